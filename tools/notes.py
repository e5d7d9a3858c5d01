# property -> (technique, level note); read by mkmanifest.py
R = "runtime monitoring: "
G = " Exploration: it decides the executions it observes, chosen by seed; assertions and overflow checks of the library are on."
T = {
 "C01": (R + "truth-table oracle with independent phase computation over gate-by-gate circuits", "Random supported parameter sets over all LWE widths and six ring fields, both shipped sets, every gate and wiring, crafted inputs at the exact end of each gate's margin, circuits and arithmetic built from gates, and arbitrary lookup tables." + G),
 "C02": (R + "statistical monitor on every output's measured error (variance, bias, correlation with input phase, input noise, depth, gate kind)", "Errors are measured with the secret key against a prediction computed from the parameters and the drawn keys; verdicts leave seven standard deviations, so a level change below roughly 15% is not resolved." + G),
 "C03": (R + "bit-identity checker over recorded call logs from stressed thread pools, plus ThreadSanitizer", "Schedules come from the operating system, work stealing and injected yields; ThreadSanitizer watches a smaller run of the same workload with the standard library instrumented." + G),
 "C04": (R + "offline checker over per-process request logs, ThreadSanitizer and Miri's race detector", "Each round runs in a new process with empty caches; logs are checked for outcome, table identity and table correctness; sizes up to 2^18." + G),
 "C05": (R + "round-trip oracle with exact integer tolerance", "Every pair of powers of two (t, q) of every ciphertext width is visited, messages exhaustively up to t = 64." + G),
 "C06": (R + "shadow model stepping with random programs over ciphertexts", "Every operation's result is compared coefficient by coefficient and by phase; fresh samples are decrypted." + G),
 "C07": (R + "shadow model of the negacyclic ring", "Quadratic ring definition in 128-bit integers; extraction at every truncation." + G),
 "C08": (R + "ring-product oracle: exact with noiseless factors, spread-scored with noisy ones", "Products are judged against the digit sum in the ring; all forms must be bit-identical." + G),
 "C09": (R + "phase oracle under source and target key, exact without noise and variance-scored with it", "Error spread is predicted from basis, dimensions and noise." + G),
 "C10": (R + "exact rational rounding oracle over boundary-biased coefficients", "Values cluster at rounding boundaries of random modulus pairs of every width; destinations hold other ciphertexts." + G),
 "C11": (R + "phase oracle: exact without noise, variance-scored with it; every exponent of small rings", "" + G.strip()),
 "C12": (R + "integer-arithmetic oracle, exhaustive on 8-bit words and edge-biased above", "" + G.strip()),
 "C13": (R + "integer-arithmetic oracle over edge words and over programs of the operations' own outputs", "BabyBear is decoded by its own definition, not by the library." + G),
 "C14": (R + "integer-arithmetic oracle over 26 derived fields", "All operand pairs for primes up to 257." + G),
 "C15": (R + "digit oracle (shift and mask in 128 bits) into dirty destinations", "" + G.strip()),
 "C16": (R + "evaluation oracle (Horner at the table's root) and schoolbook products", "Every supported size up to 2^13 per field (2^17 thorough)." + G),
 "C17": (R + "schoolbook ring oracle over every operation form", "" + G.strip()),
 "C18": (R + "goodness-of-fit, correlation, support and determinism monitors on sampled streams, plus crafted generator words", "Scores beyond seven standard deviations are violations; smaller biases than the sample resolves are not seen." + G),
 "C19": (R + "independent FIPS-197 reference and counter-stream model", "Only the x86-64 instruction path runs here." + G),
 "C20": (R + "round-trip and hostile-input oracle over text and binary formats", "" + G.strip()),
 "C21": (R + "number-theory oracle (deterministic Miller-Rabin, exact Bezout, root orders)", "" + G.strip()),
 "C22": (R + "AddressSanitizer, MemorySanitizer, ThreadSanitizer, Miri and overflow/assertion builds over random valid and hostile call sequences, and value comparison across builds", "Sanitizers see only what runs; Miri runs without the inline-assembly path. Other properties' workloads run under the sanitizers as well." + G),
 "C23": (R + "rule oracle over configurations at the boundary of every rule, accepted ones run", "" + G.strip()),
 "C24": (R + "statistical monitors on masks, errors and keys recovered from real key material", "" + G.strip()),
 "C25": (R + "128-bit integer oracle, exhaustive on bytes", "" + G.strip()),
 "C26": (R + "bit-identity oracle across fresh, reused and poisoned workspaces", "" + G.strip()),
 "C27": (R + "differential monitor: the digests of the same call sequences are compared between seven builds (profiles, target features, cargo features)", "x86-64 only; the concrete-ntt feature needs a git dependency that is not available." + G),
 "C28": (R + "model of the two counters stepped with every call, concurrent bursts with a monotonic reader, additivity of gate counts", "" + G.strip()),
}
