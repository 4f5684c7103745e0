import json
P=[]
def p(id,title,statement,over,text,why,files,mech,obs,hook=None,state=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs,hook_needed=hook)))
IC=["inputs","configurations"]
p("C01","BPSK passband link returns every message unchanged",
 "Demodulating the passband BPSK waveform of any bit message, with the same sample rate, symbol rate and carrier, yields exactly the transmitted bits in order, one per bit, for every valid parameter set (integer number of samples per symbol, carrier up to half the sample rate) in which every symbol contains carrier energy. When a symbol spans a whole number of half carrier cycles it still does if every received sample is disturbed by an arbitrary error of at most a quarter of the carrier amplitude. A partial trailing symbol produces no bit.",
 IC,"all messages (all 2^n contents, n up to thousands of bits), all bounded disturbances, all carriers and rates (concrete grid for long messages, symbolic carrier/rate for short ones)",
 "full_bpsk and ber::bpsk_works draw random bits at one or two parameter sets; messages, disturbances, carriers, odd samples-per-symbol and long-run sample indices are not quantified over.",
 ["src/bpsk.rs","src/iter/inflate.rs","src/iter/integrate.rs"],[("carrier multiply","bpsk::tx_bpsk_signal"),("correlate and dump","bpsk::rx_bpsk_signal")],["rx_bpsk_signal(tx_bpsk_signal(m))"])
p("C02","QPSK passband link returns every message unchanged",
 "Demodulating the passband QPSK waveform of any bit message with the same sample rate, symbol rate and carrier yields exactly the transmitted bits in order (a trailing unpaired bit is not sent), whenever a symbol spans a whole number of half carrier cycles and the carrier lies strictly between zero and half the sample rate. It still does when every received sample is disturbed by an arbitrary error of at most a quarter of the carrier amplitude.",
 IC,"all messages, all bounded disturbances, grid of rates and carriers including odd samples per symbol and long runs",
 "full_qpsk sends 20 random bits at one parameter set.",
 ["src/qpsk.rs","src/iter/integrate.rs"],[("I/Q modulation","qpsk::tx_qpsk_signal"),("I/Q correlate and dump","qpsk::rx_qpsk_signal")],["rx_qpsk_signal(tx_qpsk_signal(m))"])
p("C03","Baseband PSK mapping and decision regions",
 "The baseband BPSK modulator maps each bit to +1 (set) or -1 (clear) on the real axis, and the baseband QPSK modulator maps each bit pair to the point whose real and imaginary parts are each plus or minus the square root of two by the first and second bit. The baseband demodulators decide each symbol by the sign of its real (and imaginary) part alone, so any received symbol that has not crossed an axis decodes to the bits sent.",
 ["inputs"],"all messages and all received complex symbols (arbitrary finite doubles)",
 "Tests only check noiseless loopback on random bits; decision regions are never quantified over.",
 ["src/bpsk.rs","src/qpsk.rs"],[("mapper","tx_baseband_bpsk_signal / tx_baseband_qpsk_signal"),("slicer","rx_baseband_bpsk_signal / rx_baseband_qpsk_signal")],["constellation points","decided bits"])
p("C04","Baseband CDMA spreading is invertible and tolerates chip errors",
 "Spreading any message with any non-empty key produces key-length chips per bit, and despreading with the same key returns the message exactly. Despreading still returns every bit for which fewer than half of its chips were inverted in transit, whichever chips those are.",
 IC,"all messages, all keys of each length, all chip-error patterns below half per bit",
 "baseband_cdma checks random messages for five Walsh keys without any chip error.",
 ["src/cdma.rs","src/iter/inflate.rs","src/iter/chunks.rs"],[("xor spreading","cdma::tx_baseband_cdma"),("majority despreading","cdma::rx_baseband_cdma")],["rx_baseband_cdma(tx_baseband_cdma(m,k)^e,k)"])
p("C05","Passband CDMA links return every message for every key",
 "Demodulating the CDMA-BPSK or CDMA-QPSK waveform of any message with the same rates, carrier and spreading key yields exactly the transmitted bits, for every key (any bit values, any length that divides the samples of a symbol and keeps the chip rate within half the sample rate) and every valid parameter set (for QPSK, a whole number of half carrier cycles per symbol).",
 IC,"all messages and all key contents; grid of key lengths, rates and carriers",
 "Tests use one Walsh key per matrix size, one rate and carrier, random data.",
 ["src/cdma.rs"],[("chip multiply","cdma::tx_cdma_bpsk_signal, cdma::rx_cdma_bpsk_signal, cdma::tx_cdma_qpsk_signal, cdma::rx_cdma_qpsk_signal")],["rx_cdma_*(tx_cdma_*(m))"])
p("C06","Walsh-coded users sharing the channel do not interfere",
 "When several users transmit CDMA-BPSK waveforms simultaneously, each with a different Walsh code of the same Hadamard matrix, the sum of all their waveforms demodulated with one user's code returns exactly that user's bits, for every combination of the users' messages, provided each chip carries the same carrier energy.",
 IC,"all messages of all users at once (every user's bits symbolic), all user subsets of the tested matrix sizes",
 "bpsk_cdma_multi_user draws one random set of messages for two small matrices.",
 ["src/cdma.rs","src/hadamard.rs"],[("orthogonal codes","hadamard::HadamardMatrix"),("despreading correlator","cdma::rx_cdma_bpsk_signal")],["rx of summed tx"])
p("C07","Hadamard code books are orthogonal and total",
 "For every power-of-two size the code book offers size-1 distinct keys of that length; any two of them agree in exactly half of their positions and each has as many set as clear chips. Asking for the key of any user index whatsoever returns one of these keys, repeating cyclically with period size-1.",
 IC,"all user indices (any machine word), all power-of-two sizes up to the bound",
 "The hadamard test checks a parity property of fixed sizes and never calls the key lookup with indices beyond 0..n-2.",
 ["src/hadamard.rs"],[("Sylvester construction","HadamardMatrix::new"),("key lookup","HadamardMatrix::key")],["HadamardMatrix::key"])
p("C08","Coded CDMA link returns every message, padded to whole bytes",
 "Sending any message through the Reed-Solomon coded CDMA-BPSK link and receiving it with the same parameters yields the message followed only by zero bits up to the next multiple of eight. The coded stream consists, per group of up to seven message bytes, of those bytes followed by five parity bytes.",
 IC,"all messages of each length (including lengths that are not multiples of 8 or 56)",
 "Tests only use lengths whose bytes and frames line up, with random content.",
 ["src/bch.rs","src/cdma.rs","src/lib.rs"],[("frame encoder","bch::bch_stream_encode"),("frame decoder","bch::bch_stream_decode"),("bit packing","bools_to_u8s / u8_to_bools")],["rx_coded_cdma_bpsk_signal(tx_coded_cdma_bpsk_signal(m))"])
p("C09","Coded CDMA link corrects corrupted bytes and contains damage",
 "Corrupting up to two of the twelve bytes of any frame of the coded CDMA stream, in any positions and to any values, does not change what the receiver outputs. A frame damaged beyond repair never changes the number of bits delivered nor the content delivered for any other frame, and never stops the receiver; nor does a stream that ends in the middle of a frame.",
 ["inputs","fault_sequences"],"all message contents, all corrupted positions and values within the bound",
 "No test injects a single channel error into the coded link.",
 ["src/bch.rs","src/cdma.rs"],[("frame decoder","bch::bch_stream_decode")],["rx_coded_cdma_bpsk_signal on a corrupted stream"])
p("C10","Baseband OFDM link returns every symbol stream",
 "Demodulating the baseband OFDM waveform of any sequence of complex symbols, with the same subcarrier and pilot counts, returns those symbols in order (up to floating point rounding), followed only by zeros that fill the last OFDM symbol. This holds for every valid subcarrier and pilot count, whatever the symbol values.",
 IC,"all complex symbol values in a bounded box, grid of (subcarriers, pilots) pairs and message lengths",
 "One (64,12) configuration with random QPSK symbols filling whole OFDM symbols.",
 ["src/ofdm.rs","src/lib.rs"],[("mapping, IFFT, cyclic prefix","ofdm::tx_baseband_ofdm_signal"),("prefix removal, FFT, demapping","ofdm::rx_baseband_ofdm_signal")],["rx_baseband_ofdm_signal(tx_baseband_ofdm_signal(s))"])
p("C11","OFDM symbols carry a cyclic prefix and empty guard carriers",
 "Each transmitted baseband OFDM symbol is its last quarter repeated in front of it, and in the frequency domain carries energy on the data carriers only: the DC carrier and the guard carriers split over both band edges are empty, for all data. Every data symbol appears on exactly one carrier, in increasing frequency order.",
 IC,"all complex symbol values in a bounded box, grid of (subcarriers, pilots) pairs",
 "No test inspects the transmitted spectrum or the prefix; a receiver sharing the transmitter's mistake hides it.",
 ["src/ofdm.rs"],[("data carrier selection","ofdm::get_data_subcarriers"),("prefix","ofdm::tx_baseband_ofdm_signal")],["tx_baseband_ofdm_signal"])
p("C12","Passband OFDM-QPSK link returns every message",
 "Demodulating the passband OFDM-QPSK waveform of any message that fills whole OFDM symbols yields exactly the transmitted bits, for every valid subcarrier and pilot count, when a baseband sample spans a whole number of carrier cycles and the carrier lies strictly between zero and half the sample rate.",
 IC,"all messages, grid of (subcarriers, pilots, samples per sample, carrier)",
 "One parameter set with random data.",
 ["src/ofdm.rs","src/iter/convolution.rs","src/iter/take_every.rs"],[("upconversion","ofdm::tx_ofdm_qpsk_signal"),("downconversion","ofdm::rx_ofdm_qpsk_signal")],["rx_ofdm_qpsk_signal(tx_ofdm_qpsk_signal(m))"])
p("C13","Frequency-hopped BPSK link returns every message",
 "Demodulating the frequency-hopped BPSK waveform of any message with the same band, number of hop frequencies and rates yields exactly the transmitted bits, for every valid parameter set including a single hop frequency, however many hop periods the message spans.",
 IC,"all messages, grid of bands, hop counts and rates",
 "One random 9002-bit message at one parameter set.",
 ["src/fh.rs","src/bpsk.rs"],[("hop table","fh::HopTable"),("per-bit BPSK","fh::tx_fh_bpsk_signal, fh::rx_fh_bpsk_signal")],["rx_fh_bpsk_signal(tx_fh_bpsk_signal(m))"])
p("C14","Hop pattern visits every frequency once per period, data-independent",
 "A frequency-hopped transmitter sends bit after bit on hop frequencies taken from the equally spaced grid of the band, and every run of as many bits as there are hop frequencies, counted from the start, uses each of them exactly once. The pattern never depends on the message.",
 IC,"all messages, grid of hop counts, several periods",
 "hop_table compares one size against a reimplementation of itself; the transmitted waveform is not inspected.",
 ["src/fh.rs","src/fh_css.rs"],[("hop table","fh::HopTable")],["tx_fh_bpsk_signal","tx_fh_css_signal"])
p("C15","DCSK sends a chaotic reference with its keyed copy and is invertible",
 "For every message the DCSK modulator emits two samples per bit: the next value of the logistic orbit and that value with the sign given by the bit; demodulating returns the message exactly. The demodulator decides each pair by whether the two samples agree in sign, whatever their size (as long as their product is representable), and ignores an unpaired trailing sample.",
 ["inputs"],"all messages (thousands of bits), all pairs of received doubles in a bounded box",
 "Random loopback only; decision rule and orbit never checked.",
 ["src/dcsk.rs","src/chaos/logistic_map.rs"],[("reference + information","dcsk::tx_baseband_dcsk"),("correlator","dcsk::rx_baseband_dcsk")],["rx_baseband_dcsk(tx_baseband_dcsk(m))"])
p("C16","CSK selects between two chaotic orbits and is invertible",
 "For every message the CSK modulator emits one sample per bit, taken from one of two fixed logistic orbits by the bit, both orbits advancing with every bit; the two orbits never coincide, so choosing the nearer orbit returns the message exactly.",
 ["inputs"],"all messages up to thousands of bits, all disturbances smaller than half the orbit distance",
 "Random loopback on one length; no statement about all messages or disturbances.",
 ["src/csk.rs","src/chaos/logistic_map.rs"],[("orbit selection","csk::tx_baseband_csk"),("nearest orbit","csk::rx_baseband_csk")],["tx_baseband_csk","rx_baseband_csk"],"rx_baseband_csk is private: exported under the verification cfg")
p("C17","Chaotic maps keep their orbits in their interval",
 "From any starting value the constructors accept, the logistic map with any parameter from 0 to 4 stays in [0,1] and the Chebyshev map stays in [-1,1], up to floating point rounding, and neither ever yields a NaN or infinity; the tent and Bernoulli maps stay in [0,1] for parameters up to 1 and 2. Starting values outside those intervals are rejected.",
 IC,"all starting values in the interval, all map parameters in [0,4], one inductive step and bounded orbits",
 "The only test (ignored) documents that the orbit diverges.",
 ["src/chaos/logistic_map.rs","src/chaos/chebyshev.rs"],[("maps","chaos::logistic_map, chaos::chebyshev")],["LogisticMap","Chebyshev"])
p("C18","FH-OFDM-DCSK baseband link returns every message",
 "Demodulating the baseband FH-OFDM-DCSK waveform of any message yields the transmitted bits in order, padded only to a whole number of seven-bit symbols; no additional symbols are produced, and every symbol is ten finite samples with a two-sample cyclic prefix.",
 ["inputs"],"all messages of each length up to the bound",
 "The only loopback test is ignored and cuts off a spurious trailing symbol.",
 ["src/fh_ofdm_dcsk.rs","src/iter/chunks.rs","src/chaos/chebyshev.rs"],[("symbol builder","fh_ofdm_dcsk::tx_baseband_fh_ofdm_dcsk_signal"),("symbol decoder","fh_ofdm_dcsk::rx_baseband_fh_ofdm_dcsk_signal")],["rx(tx(m))"])
p("C19","FSK and FM waveforms follow their frequency law",
 "For every message the frequency-shift modulators emit, for each bit in order, one symbol of unit-amplitude cosine samples at the frequency assigned to that bit (the higher one for a set bit), on a common time base that starts at zero. The FM modulator emits a unit-amplitude cosine whose phase advances per sample by the carrier step plus a fixed multiple of the modulating value.",
 IC,"all messages, all tone and carrier frequencies within the bounds (symbolic), grid of rates",
 "No test inspects these waveforms (bfsk only plotted).",
 ["src/fsk.rs","src/fm.rs"],[("tone selection","fsk::tx_bfsk_signal, fsk::tx_mfsk_signal, fsk::tx_fsk_signal, fm::tx_fsk"),("phase accumulator","fm::tx_fm")],["sample values"])
p("C20","Chirps sweep their band and encode the bit as direction",
 "A linear chirp has one chirp period of unit-amplitude samples whose phase starts at zero and whose frequency moves linearly from the start to the end frequency; centred up- and down-chirps sweep the band around the centre in opposite directions. The FH-CSS modulator sends each bit as one such chirp centred on the hop frequency, rising for a set and falling for a clear bit.",
 IC,"all messages, all start/stop/centre frequencies and bandwidths within bounds (symbolic), grid of rates",
 "Only plotted, never asserted.",
 ["src/fh_css.rs","src/fh.rs"],[("chirp","fh_css::linear_chirp"),("bit to direction","fh_css::tx_fh_css_signal")],["sample values"])
p("C21","Stream adaptors deliver exactly the documented elements",
 "For every input stream: chunking concatenates back to the input with all chunks full except possibly the last; whole-chunking pads only the last chunk with defaults and yields ceil(n/size) chunks; inflating repeats each element the given number of times (none for zero copies); decimating keeps every k-th element starting at the first; scaling multiplies each element.",
 IC,"all element values, all lengths and sizes within the bounds (including zero and exact multiples)",
 "Doc examples check one size each.",
 ["src/iter/chunks.rs","src/iter/inflate.rs","src/iter/take_every.rs","src/iter/scale.rs"],[("adaptors","iter::Iter")],["chunks/wchunks/inflate/take_every/scale"])
p("C22","Integrators deliver running and per-block sums of every stream",
 "For every input stream the integrators yield, at each position, the sum of all elements so far, and the integrate-and-dump adaptors yield one sum per complete block of the given length and nothing for an incomplete one; the multi-branch versions do the same independently per branch.",
 IC,"all element values (integers incl. wrap-free full range, and reals), all lengths and block sizes within the bounds",
 "Doc examples integrate constant ones.",
 ["src/iter/integrate.rs"],[("integrators","iter::integrate")],["integrate/nintegrate/integrate_and_dump/nintegrate_and_dump"])
p("C23","Streaming convolution equals linear convolution",
 "For every signal and every non-empty filter, the streaming convolution adaptor (and, per branch, its multi-branch version) yields exactly the full linear convolution: signal length plus filter length minus one outputs, each the sum of products of signal and time-reversed filter.",
 IC,"all signal and filter values (symbolic), all lengths within the bounds, including signals shorter than the filter",
 "Tests use a constant filter, which hides any confusion about filter order.",
 ["src/iter/convolution.rs"],[("ring buffer","Convolver, Nonvolver")],["convolve/nonvolve"])
p("C24","Band-pass filter keeps exactly the in-band spectrum",
 "For every real signal made of whole blocks, the FFT band-pass filter returns a real signal of the same length whose discrete spectrum, block by block, equals the input's at frequencies inside the band (edges included) and is zero outside. It is linear and applying it twice equals applying it once.",
 IC,"all real sample values in a bounded box, grid of block lengths, bands and sample rates",
 "One three-tone signal with a 40% tolerance.",
 ["src/bpf.rs"],[("spectral mask","bpf::bandpass")],["bandpass"])
p("C25","SSCA computes the strip spectral correlation of every signal",
 "For every real signal, strip length and even number of channels the strip spectral correlation output equals its definition: windowed short transforms, centred in frequency and down-converted, multiplied by the conjugate centre sample and window, and transformed along time, with both axes in centred order. Where the strip length is a multiple of the number of channels, the mapped form places every strip value at its frequency and cycle-frequency cell and never leaves the output array.",
 IC,"all real sample values in a bounded box for small transform sizes",
 "No Rust test exercises it; a Python script compares plots by eye.",
 ["src/ssca.rs","src/lib.rs"],[("strip transform","ssca::ssca_base"),("cell mapping","ssca::ssca_mapped")],["ssca_base","ssca_mapped"])
p("C26","Error rate and energy measures obey their definitions",
 "The bit error rate of two messages is the number of differing positions over their common length, whatever the messages. Energy is the sum of squared samples over the sample rate, average energy that sum over the number of samples, power the energy over the number of samples; none is ever negative, and scaling the signal scales them by the square.",
 IC,"all messages and signals within the bounds",
 "A sine and random sequences only; the off-by-one in the power average is hidden by the tolerance.",
 ["src/lib.rs"],[("measures","ber, energy, avg_energy, power")],["return values"])
p("C27","Added noise never changes stream length or depends on the signal",
 "The noise channel delivers exactly one output per input sample, adds to each sample a noise value of its own that does not depend on any signal value and is proportional to the standard deviation, and with zero standard deviation returns the signal unchanged. A noise level that is infinite or not a number is rejected.",
 IC,"all signals in a bounded box, all generator states sampled symbolically up to the seed, grid of levels",
 "Statistical tests look at averages only.",
 ["src/lib.rs"],[("channel","awgn, awgn_complex")],["awgn","awgn_complex"])
p("C28","Modulators are causal streams: a prefix in gives a prefix out",
 "For every modulator, the samples produced for the first bits of a message do not depend on the bits that follow: the waveform of a message is a prefix of the waveform of every extension of it on symbol boundaries. Samples are produced lazily: obtaining a symbol's samples consumes no message bit beyond that symbol.",
 ["inputs","histories"],"all messages and all extensions within the bounds",
 "Tests compare whole messages only.",
 ["src/bpsk.rs","src/qpsk.rs","src/cdma.rs","src/fh.rs","src/fsk.rs","src/fm.rs","src/csk.rs","src/dcsk.rs","src/fh_css.rs","src/ofdm.rs","src/fh_ofdm_dcsk.rs"],[("iterator pipelines","all tx_* functions")],["tx_*"])
p("C29","Linear modulators emit the textbook waveform",
 "For every message and every valid parameter set, sample n of the BPSK waveform is plus or minus the cosine of the carrier phase at time n over the sample rate, with the sign of the current bit; QPSK is the I bit on the cosine minus the Q bit on the sine; CDMA waveforms multiply these by the current key chip. There are exactly samples-per-symbol samples for each complete symbol.",
 IC,"all messages and key bits, all carriers and rates (symbolic for short messages, grid for long ones)",
 "Loopback tests pass with any waveform the receiver happens to match; no test checks a sample.",
 ["src/bpsk.rs","src/qpsk.rs","src/cdma.rs"],[("modulators","tx_bpsk_signal, tx_qpsk_signal, tx_cdma_bpsk_signal, tx_cdma_qpsk_signal")],["sample values"])
p("C30","Impossible modulation parameters are rejected, valid ones accepted",
 "The passband modulators and demodulators that document their limits by assertion refuse a carrier or top frequency more than one hertz above half the sample rate, a non-integer number of samples per symbol or per chip, and a chip rate above half the sample rate, before producing a sample, and accept every parameter set within those limits.",
 ["configurations"],"all sample rates, symbol rates and carriers within the word-size bounds (symbolic), key lengths in a range",
 "Tests only use valid parameters.",
 ["src/bpsk.rs","src/cdma.rs","src/fh.rs","src/fsk.rs","src/fh_css.rs","src/ofdm.rs","src/fh_ofdm_dcsk.rs"],[("assertions","tx_* / rx_* entry"),("integrality test","is_int")],["panic or not"])
p("C31","Error function helpers are odd, complementary and bounded",
 "For every finite argument the error function lies between -1 and 1, is odd within a millionth, has the sign of its argument once that is at least 0.05 in size, agrees with the mathematical error function within 0.0015, and adds up to one with its complement.",
 ["inputs"],"all finite doubles in a bounded range",
 "Only used indirectly in theory curves.",
 ["src/lib.rs"],[("approximation","erf, erfc")],["return values"])
p("C32","FH-OFDM-DCSK passband waveforms follow the baseband symbols",
 "Each baseband FH-OFDM-DCSK sample is held for the samples of one symbol period and mixed with the carrier (or the hop frequency) on a common time base, the transmitted sample being the real part; the waveform never exceeds the magnitude of the baseband sample.",
 IC,"all messages of the bounded length, grid of rates and carriers",
 "Only plotted.",
 ["src/fh_ofdm_dcsk.rs"],[("upconversion","tx_fh_ofdm_dcsk_signal, tx_fh_ofdm_dcsk_signal_2")],["sample values"])
p("C33","The Python reference modem returns every message",
 "The Python reference implementation of the BPSK and QPSK links, baseband and passband, returns every message it modulates (an odd last bit of a QPSK message padded with a clear one), for every valid parameter set in which each symbol contains carrier energy (for QPSK a whole number of half carrier cycles per symbol and a carrier strictly between zero and half the sample rate). When a symbol spans whole half carrier cycles it still does if every sample is disturbed by at most a quarter of the carrier amplitude.",
 IC,"all messages within the bound, grid of parameters",
 "psk_test.py runs BPSK on one random message; QPSK is not tested.",
 ["kom_py/psk.py","kom_py/util.py"],[("reference modem","psk.tx_bpsk, psk.rx_bpsk, psk.tx_qpsk, psk.rx_qpsk")],["rx(tx(m))"])
p("C34","Statistical bit error rate matches theory",
 "The bit error rate of each link in additive white Gaussian noise equals the theoretical curve within statistical confidence.",
 ["inputs"],"all noise realisations, in distribution",
 "Monte-Carlo estimates at a few points.",
 ["src/lib.rs","tests/ber.rs"],[("noise","awgn")],["ber"])
p("C35","Butterworth band-pass passes the tones of its band unshifted and removes the others",
 "Filtering any sum of tones, each present or absent, with either sign and as sine or cosine, returns as many samples as were sent; away from the ends of the stream each tone comes out with its phase unchanged and with the amplitude that the designed response (Butterworth band-pass of order 64, applied forwards and backwards) gives it: whole inside the band, half at its two edges, nothing outside.",
 IC,"every combination of tones; grid of bands, rates and frequencies",
 "No assertion: the one test writes plots.",
 ["src/bpf.rs"],[("filter design and zero-phase filtering","bpf::butterpass")],["butterpass"])

p("C36","The fm module's FSK link returns every message",
 "Receiving the waveform of the fm module's FSK transmitter with the same sample rate, symbol rate and carrier yields exactly the transmitted bits, for every message and every valid parameter set in which the waveforms of the two tones differ within each symbol. It still does when the tones are orthogonal over a symbol and every sample is disturbed by an arbitrary error of at most a quarter of the amplitude.",
 IC,"all messages of the bounded length, all bounded disturbances, grid of rates and carriers",
 "The one loopback test uses one parameter set and random bits (and was failing).",
 ["src/fm.rs"],[("two-tone modulation","fm::tx_fsk"),("tone decision","fm::rx_fsk")],["rx_fsk(tx_fsk(m))"])
p("C37","The Python CDMA reference link returns every message",
 "The Python reference CDMA transmitter multiplies its BPSK waveform chip by chip with the module's spreading key, and the receiver with the same rates and carrier returns every message, also when every sample is disturbed by at most a quarter of the carrier amplitude.",
 IC,"all messages of the bounded length, all bounded disturbances, grid of rates and carriers",
 "No test runs kom_py/cdma.py.",
 ["kom_py/cdma.py","kom_py/psk.py"],[("spreading and despreading","cdma.tx_bpsk_cdma, cdma.rx_bpsk_cdma")],["rx_bpsk_cdma(tx_bpsk_cdma(m))"])
p("C38","The Python reference SSCA computes its definition",
 "For every real signal the Python strip spectral correlation output equals its definition: windowed short transforms, centred in frequency and down-converted, multiplied by the conjugate centre sample and window, and transformed along time, with both axes in centred order. The mapped form places every value at its frequency and cycle-frequency cell and leaves every other cell zero (strip length a multiple of the number of channels, both powers of two).",
 IC,"all real signals in a bounded box, grid of strip lengths and channel counts",
 "The Python and Rust estimators are only timed and plotted against each other.",
 ["kom_py/ssca.py"],[("estimator","ssca.ssca")],["ssca(s, N, Np, map_output)"])
p("C39","Python helpers: powers of two, grouping and spectrum centring",
 "For every positive integer the reference helpers give the least power of two not below it and the greatest not above it. Grouping a sequence yields its elements in order in groups of the given size, the last one filled up with the fill value; centring a spectrum moves bin zero to the middle and keeps the cyclic order.",
 ["inputs"],"all positive integers below 2^100; all sequences of bounded length",
 "No test calls them.",
 ["kom_py/util.py"],[("helpers","util.next_power_of_2, util.floor_power_of_2, util.chunk, util.fftshift")],["return values"])
p("C40","The Python module offers the Rust modem unchanged",
 "Every modulator, demodulator, noise and energy function the Python module offers gives back, for every argument, exactly what the Rust function it stands for gives for the same values: data survive tx then rx, CDMA spreads with the first Walsh key of the 16-chip book, the chaotic waveforms hold each chaotic value for the samples of a symbol, the radiometer reports ten times the decimal logarithm of the sum of squared magnitudes, and the noise functions add the scaled normal draws to each sample.",
 ["inputs"],"all data words, all parameters a user may pass, all signals of bounded length",
 "No test crosses the Python boundary from Rust, and the Python scripts are not run by the test suite.",
 ["src/lib.rs"],[("Python wrappers","src/lib.rs module_with_functions! and the functions it lists")],["return values"],"cfg(komunikilo_verif_py)")
p("C41","Decibel, grid and window helpers keep their laws",
 "Converting a level from decibels and back gives the level again, powers multiply where levels add and divide where they subtract, and 0 dB is one. An evenly spaced grid of n values starts at its start and steps by the n-th part of the span, for either direction of the span. The Hamming windows have the given length, follow 0.54 - 0.46 cos(2 pi i / n) and are symmetric about their middle; the complex one is real.",
 ["inputs"],"all levels from -300 to 300 dB, all ends of the grid, lengths up to 128",
 "No test covers them.",
 ["src/lib.rs"],[("helpers","db, undb, linspace, hamming_window, hamming_window_complex")],["return values"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
