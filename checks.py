# One entry per property: what is built and how many cases each stage runs.
# quick: cases per build variant ("asan", "rel", "dbg", "tsan") and libFuzzer runs ("fuzz").
DEFAULTS = dict(libs=["-lsecp256k1", "-lcrypto"], thorough_factor=13, level="exploration",
                assumptions=["the reference models in /verif/lib (and OpenSSL's digests and curve arithmetic) are right",
                             "x86-64 Linux, little endian, gcc 13 and clang 18"])

CURVE = ["ec_pubkey_create", "ec_pubkey_parse", "ec_pubkey_serialize", "ec_privkey_tweak_add", "ec_seckey_tweak_add", "ec_pubkey_tweak_add", "ec_seckey_verify",
         "ecdsa_sign", "ecdsa_verify", "ecdsa_signature_normalize", "ecdsa_signature_parse_compact", "ecdsa_signature_parse_der",
         "ecdsa_signature_serialize_compact", "ecdsa_signature_serialize_der", "context_randomize"]

CHECKS = {
    "C01": dict(src="c01_hex.cpp", quick=dict(asan=80000, rel=300000, dbg=60000, fuzz=100000), fixed_variants=["asan", "rel", "dbg"], fixed_shards=2),
    "C02": dict(src="c02_hexdump.cpp", quick=dict(asan=20000, rel=60000, dbg=20000, fuzz=60000), fixed_variants=["asan", "rel", "dbg"], fixed_shards=2),
    "C03": dict(src="c03_base64.cpp", quick=dict(asan=80000, rel=300000, dbg=60000, fuzz=100000), fixed_variants=["asan", "rel", "dbg"], fixed_shards=2),
    "C04": dict(src="c04_base32.cpp", quick=dict(asan=80000, rel=300000, dbg=60000, fuzz=100000), fixed_variants=["asan", "rel", "dbg"], fixed_shards=2),
    "C05": dict(src="c05_base58.cpp", quick=dict(asan=30000, rel=100000, dbg=20000, fuzz=20000), fixed_variants=["asan", "rel", "dbg"], fixed_shards=2),
    "C06": dict(src="c06_base58check.cpp", quick=dict(asan=30000, rel=100000, dbg=20000, fuzz=60000), fixed_variants=["asan", "rel"], fixed_shards=2),
    "C07": dict(src="c07_bech32.cpp", quick=dict(asan=60000, rel=200000, dbg=60000, fuzz=200000), fixed_variants=["asan", "rel", "dbg"], fixed_shards=2),
    "C08": dict(src="c08_varint.cpp", quick=dict(asan=300000, rel=1500000, dbg=300000, fuzz=600000), fixed_variants=["asan", "rel", "dbg"], fixed_shards=1),
    "C09": dict(src="c09_digests.cpp", quick=dict(asan=60000, rel=150000, dbg=40000, fuzz=60000), fixed_variants=["asan", "rel", "dbg"], fixed_shards=8, slow_fixed=True),
    "C10": dict(src="c10_hmac.cpp", quick=dict(asan=60000, rel=150000, dbg=40000, fuzz=60000), fixed_variants=["asan", "rel", "dbg"], fixed_shards=6),
    "C11": dict(src="c11_btchash.cpp", quick=dict(asan=60000, rel=150000, dbg=40000, fuzz=60000), fixed_variants=["asan", "rel", "dbg"], fixed_shards=4),
    "C12": dict(src="c12_address.cpp", quick=dict(asan=60000, rel=150000, dbg=40000, fuzz=60000), fixed_variants=["asan", "rel", "dbg"], fixed_shards=2),
    "C13": dict(src="c13_wif.cpp", quick=dict(asan=60000, rel=150000, dbg=40000, fuzz=40000), fixed_variants=["asan", "rel", "dbg"], fixed_shards=2),
    "C14": dict(src="c14_pubkey.cpp", quick=dict(asan=30000, rel=60000, dbg=15000, fuzz=10000), fixed_variants=["asan", "rel", "dbg"], fixed_shards=2),
    "C15": dict(src="c15_keyder.cpp", quick=dict(asan=20000, rel=60000, dbg=15000, fuzz=12000), fixed_variants=["asan", "rel", "dbg"], fixed_shards=2),
    "C16": dict(src="c16_ecdsa.cpp", quick=dict(asan=8000, rel=10000, dbg=2000, fuzz=3000), fixed_variants=["asan", "rel", "dbg"], fixed_shards=2),
    "C17": dict(src="c17_sigder.cpp", quick=dict(asan=60000, rel=200000, dbg=40000, fuzz=100000), fixed_variants=["asan", "rel", "dbg"], fixed_shards=2),
    "C18": dict(src="c18_bip32.cpp", ldflags=["-Wl,--wrap=fingera_hmac_sha512"], quick=dict(asan=10000, rel=12000, dbg=2000, fuzz=3000), fixed_variants=["asan", "rel", "dbg"], fixed_shards=2),
    "C19": dict(src="c19_exkeystring.cpp", quick=dict(asan=25000, rel=50000, dbg=10000, fuzz=6000), fixed_variants=["asan", "rel", "dbg"], fixed_shards=2),
    "C21": dict(src="c21_confined.cpp", ldflags=["-Wl,--wrap=secp256k1_" + f for f in CURVE], quick=dict(asan=20000, rel=100000, dbg=30000, fuzz=20000), fixed_variants=["asan", "rel", "dbg"], fixed_shards=2),
    "C22": dict(src="c22_pure.cpp", quick=dict(asan=16000, rel=80000, dbg=16000, tsan=5000, fuzz=6000), fixed_variants=["asan", "rel", "dbg", "tsan"], fixed_shards=2, schedules=True, replay_repeat=10,
                ldflags=["-Wl,--wrap=malloc", "-Wl,--wrap=calloc", "-Wl,--wrap=realloc", "-Wl,--wrap=free"]),
    "C23": dict(src="c23_erase.cpp", quick=dict(rel=40000, dbg=30000), fixed_variants=["rel", "dbg"], fixed_shards=2,
                ldflags=["-Wl,-z,now", "-Wl,--wrap=read", "-Wl,--wrap=malloc", "-Wl,--wrap=calloc", "-Wl,--wrap=realloc", "-Wl,--wrap=free"]),
    "C20": dict(src="c20_random.cpp", quick=dict(asan=8000, rel=60000, dbg=20000, tsan=3000, fuzz=4000), fixed_variants=["asan", "rel", "dbg"], fixed_shards=2, schedules=True, replay_repeat=25, level="fault_enumeration",
                ldflags=["-Wl,--wrap=" + f for f in ("open", "open64", "read", "close", "getrandom", "getentropy")]),
    "C24": dict(src="c24_endian.cpp", quick=dict(asan=100000, rel=400000, dbg=100000, fuzz=60000), fixed_variants=["asan", "rel", "dbg"], fixed_shards=1),
    "C25": dict(src="c25_fatal.cpp", quick=dict(rel=12000, dbg=8000, asan=1500), fixed_variants=["asan", "rel", "dbg"], fixed_shards=2),
    "C26": dict(src="c26_wallet.cpp", quick=dict(asan=2500, rel=5000, dbg=1000, fuzz=800), fixed_variants=["asan", "rel", "dbg"], fixed_shards=2),
    "C27": dict(src="c27_nomem.cpp", quick=dict(rel=20000, dbg=12000, asan=1500), fixed_variants=["asan", "rel", "dbg"], fixed_shards=2, level="fault_enumeration",
                lib_cflags=["-fstack-protector-all"], ldflags=["-Wl,--wrap=malloc", "-Wl,--wrap=calloc", "-Wl,--wrap=realloc"]),
    "C28": dict(src="c28_giveback.cpp", quick=dict(rel=60000, dbg=24000, asan=8000, fuzz=3000), fixed_variants=["rel", "dbg"], fixed_shards=4),
    "C29": dict(src="c29_bounded.cpp", quick=dict(rel=60000, dbg=40000), fixed_variants=["rel", "dbg"], fixed_shards=2,
                ldflags=["-Wl,-z,now", "-Wl,--wrap=malloc", "-Wl,--wrap=calloc", "-Wl,--wrap=realloc", "-Wl,--wrap=free"]),
    "C33": dict(src="c33_work.cpp", quick=dict(rel=30000, dbg=20000), fixed_variants=["rel", "dbg"], fixed_shards=4, lib_cflags=["-fsanitize-coverage=trace-pc"],
                ldflags=["-Wl,--wrap=" + f for f in "memset memcpy memmove memcmp strncmp strlen strnlen memchr memrchr strchr strspn strcspn".split()]),
    "C30": dict(src="c30_reentrant.cpp", quick=dict(rel=20000, dbg=8000), fixed_variants=["rel", "dbg"], fixed_shards=4, ldflags=["-Wl,-z,now"]),
    "C31": dict(src="c31_settings.cpp", locales=True, quick=dict(rel=60000, dbg=30000, asan=10000), fixed_variants=["rel", "dbg", "asan"], fixed_shards=2,
                ldflags=["-Wl,--wrap=" + f for f in "getenv secure_getenv clock_gettime gettimeofday time clock getpid getppid gettid getuid geteuid getgid sched_getcpu rand random isatty".split()]),
    "C32": dict(src="c32_builds.cpp", side_src="c32_side.cpp", ldflags=["-rdynamic"], quick=dict(rel=40000), fixed_variants=["rel"], fixed_shards=4, sides={
        "gcc-O0": ("gcc", ["-O0"], []),
        "gcc-O3-native": ("gcc", ["-O3", "-DNDEBUG", "-march=native"], []),
        "gcc-O2-uchar": ("gcc", ["-O2", "-funsigned-char"], []),
        "gcc-Os-nobuiltin": ("gcc", ["-Os", "-fno-builtin", "-DNDEBUG"], ["-ftrivial-auto-var-init=zero"]),
        "gcc-O2-hardened": ("gcc", ["-O2", "-D_FORTIFY_SOURCE=3", "-fstack-protector-all"], ["-ftrivial-auto-var-init=pattern"]),
        "clang-O0": ("clang", ["-O0", "-DNDEBUG"], []),
        "clang-O3-native": ("clang", ["-O3", "-DNDEBUG", "-march=native"], []),
        "clang-O2-uchar": ("clang", ["-O2", "-funsigned-char"], []),
        "gcc-O2-lto": ("gcc", ["-O2", "-flto"], []),
    }),
}

# numbers above are of the first, short runs; twice as many fit into a minute
for _id, _c in CHECKS.items():
    if _id not in ("C27", "C30"):
        for _v in ("asan", "rel", "dbg", "fuzz"):
            if _v in _c["quick"]:
                _c["quick"][_v] *= 2
