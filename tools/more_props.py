prop("C26", "A wallet restored from any of its forms gives the same keys and addresses",
     "From one seed, walking any path privately or watch-only, with the keys stored and restored in any of the text and binary forms on the way, always gives the same keys and the same standard addresses on a network, and each address decodes to what it pays. "
     "A signature by a restored key, carried as DER text, verifies under the watch-only key of that leaf and for that message only.",
     ["inputs", "histories", "configurations"], "every seed, path, network, mixture of restores and message",
     "The tests exercise every function alone against fixed vectors; no test carries a key through two of them.",
     ["src/btc/exkey.c", "src/btc/key.c", "src/btc/address.c", "src/btc/base58_check.c", "src/btc/bech32.c", "src/btc/hash.c"],
     [("derivation, text forms, addresses and signatures agree on byte orders and sizes", "src/btc/*.c")],
     ["exkey, key, address, base58check, hex and base64 functions in composition"],
     "stateful property-based testing and libFuzzer: whole-wallet histories against a BIP 32 / BIP 173 / RFC 6979 model over OpenSSL", "")
prop("C27", "Running out of memory never gives a wrong answer",
     "When a temporary allocation of any operation fails, the operation either ends the process, or reports failure in its own way, or still gives the right result; it never returns a wrong result as a success nor writes outside its operands. "
     "Once memory is available again the same call gives the right result.",
     ["fault_sequences", "inputs"], "every operation and operand large enough to need heap memory, with any one of its allocations, or it and all later ones, failing",
     "No test makes an allocation fail.",
     ["include/fingera_libc/sl/buffer.h", "src/base58.c", "src/btc/base58_check.c", "src/btc/key.c", "src/btc/exkey.c", "src/btc/address.c"],
     [("stack-or-heap temporary buffers", "include/fingera_libc/sl/buffer.h")], ["all 61 public operations under malloc, calloc, realloc failure"],
     "fault-injection property-based testing: every allocation of generated calls fails in turn in a forked child, differential against the run without faults",
     "Allocations made inside libsecp256k1 and libc are not made to fail. Ending the process by a null access counts as ending it.",
     level="fault_enumeration", state=[])
prop("C28", "Calls give back everything they take",
     "However often any sequence of calls is repeated - on valid or refused operands, with the same or other ones, from one thread or from threads that come and go, across stopping and starting the key context - the process holds no more heap memory, file descriptors or threads than after the first repetitions. "
     "A call also leaves the process' settings (signal dispositions and masks, limits, timers, umask, working directory, environment, locale, rounding mode) as it found them.",
     ["inputs", "histories"], "every operation, every operand (refused ones and ones larger than the stack buffers included), every sequence, number of repetitions and assignment to threads",
     "The tests call everything once or twice and never look at what is left behind; no refused text is long enough to use the heap.",
     ["include/fingera_libc/sl/buffer.h", "src/base58.c", "src/btc/base58_check.c", "src/btc/address.c", "src/btc/key.c", "src/btc/exkey.c", "src/random.c", "src/hex.c"],
     [("a release before each return", "FREE_BUFFER in src/base58.c, src/btc/*.c"), ("descriptor of the entropy device", "src/random.c"), ("key contexts", "src/btc/key.c fingera_btc_key_uninit")],
     ["the process' heap, descriptors, threads and settings around all public operations"],
     "stateful property-based testing and libFuzzer: generated call histories repeated under a counting allocator, growth in every repetition is a failure; batches of different calls",
     "A bounded cache (up to some thousand entries per operation) is not counted as keeping memory.")
prop("C29", "Calls need little stack and no more heap than their operands call for",
     "Whatever the size of its operands, no call needs more than 32 KiB of stack - so it works on the small stacks of threads and coroutines, with operands of many times that size - "
     "and the temporary heap memory the library holds at any moment of a call is at most 16 KiB plus 8 times the size of the operands.",
     ["inputs"], "every operation and every operand of 0 bytes to megabytes, accepted or refused",
     "The tests use operands of a few dozen bytes on the main thread's stack of 8 MiB.",
     ["include/fingera_libc/sl/buffer.h", "src/base58.c", "src/btc/base58_check.c", "src/btc/address.c", "src/btc/key.c", "src/btc/exkey.c", "src/hash/sha2.c", "src/hash/sha1.c", "src/hash/ripemd160.c", "src/hex.c", "src/base64.c", "src/base32.c", "src/random.c", "src/cleanse.c"],
     [("small buffers on the stack, larger ones on the heap", "include/fingera_libc/sl/buffer.h"), ("block-wise processing of messages", "src/hash/*.c"), ("buffer sizes computed from the operand", "src/base58.c")],
     ["stack and heap used by all public operations"],
     "property-based testing: generated calls on a painted private stack, the deepest overwritten byte and the peak of counted allocations against fixed limits",
     "Compiled by gcc at -O0 and -O2; memory taken inside libsecp256k1 counts for the stack, not for the heap.")
prop("C30", "Calls are reentrant",
     "A call interrupted at any instruction by other complete calls of any operations - from a signal handler or another coroutine of the same thread - gives what it gives alone, and so do the calls that interrupt it; none of them waits for another. "
     "(Starting and stopping the key context is not among these calls.)",
     ["inputs", "schedules"], "every pair of operations, every operand, every instruction of the interrupted call inside this library",
     "No test runs one call inside another, and a thread sanitizer does not see memory shared by the calls of one thread.",
     ["src/btc/hash.c", "src/btc/key.c", "src/btc/exkey.c", "src/btc/address.c", "src/btc/base58_check.c", "src/hash/sha2.c", "src/hash/sha1.c", "src/hash/ripemd160.c", "src/hex.c", "src/base58.c", "src/base64.c", "src/base32.c", "src/random.c"],
     [("all working memory lies on the stack or the heap of the call", "src/*.c"), ("one global: the key context, written only by init and uninit", "src/btc/key.c")],
     ["all public operations interrupted by all public operations"],
     "property-based testing: generated calls are single-stepped by the processor's trap flag and interrupted at generated instructions by other generated calls; differential against the calls made alone",
     "Instructions of libsecp256k1 and libc are run through without interruption; x86-64 only. fingera_hex_dump writes to stdio and is left out.")
prop("C31", "Results do not depend on the settings of the process",
     "Every operation gives the same result whatever locale, errno, rounding and denormal mode, umask, working directory, environment, clock, process and user number, blocked, pending or ignored signals and heap fill the process has, "
     "with standard descriptors closed, in whatever thread or forked child it runs - and it leaves those settings as it found them. (The wording of fatal messages, which quotes the system's error text, is left out.)",
     ["inputs", "configurations"], "every operation, every operand, every combination of the settings",
     "The tests run in one process with the C locale and default settings, where ctype functions, errno and rounding happen to behave.",
     ["src/btc/bech32.c", "src/base58.c", "src/base64.c", "src/base32.c", "src/hex.c", "src/random.c", "src/btc/key.c", "src/btc/address.c", "src/compress_integer.c", "src/hash/sha2.c"],
     [("ASCII classification by own tables and comparisons, and isspace", "src/btc/bech32.c, src/base58.c"), ("return values rather than errno", "src/random.c"), ("integer arithmetic for sizes", "src/base58.c")],
     ["all public operations under generated process settings"],
     "property-based testing: each generated call is made in a plain state and under generated settings (locales are built for the check, getenv, clocks and numbers answered by stand-ins); differential on results and settings",
     "glibc's locales only; a locale that localedef cannot build is skipped. Settings that make system calls fail (limits, missing devices) belong to C20 and C27.")
prop("C32", "Results do not depend on how the library is built",
     "Compiled by gcc or clang, without or with optimisation of any level, for the processor at hand, with asserts or without, with char signed or unsigned, with built-in functions or without, whatever automatic variables hold at first, "
     "every operation gives the same result, wherever its byte operands lie (aligned or not).",
     ["inputs", "configurations"], "every operation, every operand, alignment and build",
     "The tests run on one build, where asserts are on, char is signed and nothing is optimised.",
     ["src/base58.c", "src/base64.c", "src/base32.c", "src/hex.c", "src/compress_integer.c", "src/hash/sha1.c", "src/hash/sha2.c", "src/hash/ripemd160.c", "src/btc/bech32.c", "src/btc/key.c", "src/btc/exkey.c", "src/btc/address.c", "src/btc/hash.c", "src/btc/base58_check.c", "include/fingera_libc/endian.h"],
     [("asserts without effects", "src/btc/key.c, src/btc/exkey.c"), ("tables and digits of explicit signedness", "src/base58.c, src/btc/bech32.c"), ("integer access by byte order macros", "include/fingera_libc/endian.h")],
     ["nine builds of all public operations"],
     "differential property-based testing: each generated call is made in every one of the builds, loaded side by side; all results must be equal",
     "x86-64, gcc 13 and clang 18; the link to libsecp256k1 is the same in all builds.")

prop("C33", "Calls end after work in proportion to their operands",
     "Every call ends, whatever its operands, and the work it does grows at most linearly with their size - quadratically for the conversions from and to base58 and what is built on them: "
     "at most 30000 + 100 n steps (+ 10 n^2) for n bytes of operands, a step being a basic block of the library as compiled, or 16 bytes handled by a string function, the work of libsecp256k1 left out.",
     ["inputs"], "every operation, valid, damaged and hostile operands of every size and content",
     "The tests' operands are so short that even exponential work would end at once.",
     ["src", "include/fingera_libc"], [("loops over operands", "all codecs and parsers"), ("base58 arithmetic", "src/base58.c")],
     ["all 61 public operations, random bytes, new keys, dumps, erasing and context restarts"],
     "property-based testing: the library's basic blocks count themselves; the count of each generated call is compared with the bound",
     "Counts work, not time. Operands up to 2 MiB where the work is linear and 16 KiB where it is quadratic.")
