"""Which generators, build configurations and models decide each property."""
import ct

CPP, JAVA, BOTH = ("cpp",), ("java",), ("cpp", "java")

CHECKS = {
    "C01": {"gens": [("g_arith", BOTH, 1200), ("g_model_carries", BOTH, 1)]},
    "C02": {"gens": [("g_compare", BOTH, 1000), ("g_model_order", BOTH, 1)]},
    "C03": {"gens": [("g_reciprocal", BOTH, 700)]},
    "C04": {"gens": [("g_field", BOTH, 1200), ("g_field_root", BOTH, 250), ("g_model_field", BOTH, 1)]},
    "C05": {"gens": [("g_frame", BOTH, 320), ("g_model_ints", BOTH, 1)]},
    "C06": {"gens": [("g_group", BOTH, 400), ("g_model_points", BOTH, 1)]},
    "C07": {"gens": [("g_scalar", BOTH, 220), ("g_public", BOTH, 120)]},
    "C08": {"gens": [("g_predicates", BOTH, 500)]},
    "C09": {"gens": [("g_sign", BOTH, 350)]},
    "C10": {"gens": [("g_sign_hmac", BOTH, 250)]},
    "C11": {"gens": [("g_verify", BOTH, 420)]},
    "C12": {"gens": [("g_sha256", BOTH, 700), ("g_huge256", BOTH, 2)]},
    "C13": {"gens": [("g_stream", CPP, 900), ("g_model_stream", CPP, 1), ("g_model_hashers", CPP, 1)]},
    "C14": {"gens": [("g_sha512", BOTH, 700), ("g_huge512", BOTH, 2)]},
    "C15": {"gens": [("g_ripemd160", BOTH, 700), ("g_hugermd", BOTH, 2)]},
    "C16": {"gens": [("g_keccak256", BOTH, 700), ("g_hugekeccak", BOTH, 2)]},
    "C17": {"gens": [("g_hashvalue", BOTH, 800)]},
    "C18": {"gens": [("g_b58_encode", CPP, 900), ("g_fields_b58enc", CPP, 1)]},
    "C19": {"gens": [("g_b58_decode", CPP, 1200), ("g_near_addr", CPP, 1), ("g_near_wif", CPP, 1), ("g_fields_addr", CPP, 1), ("g_fields_wif", CPP, 1)]},
    "C20": {"gens": [("g_b58_java", JAVA, 1500), ("g_near_b58java", JAVA, 1), ("g_fields_b58java", JAVA, 1)]},
    "C21": {"gens": [("g_bech32", JAVA, 1500), ("g_near_bech32", JAVA, 1), ("g_fields_bech32", JAVA, 1)]},
    "C22": {"gens": [("g_segwit", JAVA, 1500), ("g_near_segwit", JAVA, 1), ("g_fields_segwit", JAVA, 1)]},
    "C23": {"gens": [("g_bip32", CPP, 260), ("g_model_wallet", CPP, 1), ("g_fields_wallet", CPP, 1)]},
    "C24": {"gens": [("g_xprv", CPP, 260), ("g_model_wallet", CPP, 1), ("g_fields_wallet", CPP, 1), ("g_near_xprv", CPP, 1), ("g_fields_xprv", CPP, 1)]},
    "C25": {"special": ct.constant_time},
    "C30": {"special": ct.operation_counts, "configs": ("pure-count", "x86-count"),
            "gens": [("g_arith", CPP, 200), ("g_compare", CPP, 100), ("g_reciprocal", CPP, 60), ("g_field", CPP, 200), ("g_frame", CPP, 60), ("g_group", CPP, 80),
                     ("g_scalar", CPP, 40), ("g_predicates", CPP, 80), ("g_sign", CPP, 60), ("g_sign_hmac", CPP, 40), ("g_verify", CPP, 80)]},
    "C26": {"gens": [("g_history", BOTH, 60), ("g_mixed", BOTH, 150)], "threads": 8,
            "configs": ("pure-opt", "x86-opt", "java-da", "java-ea", "pure-tsan", "x86-tsan")},
    "C27": {"gens": [("g_refuse", JAVA, 60)]},
    "C28": {"gens": [("g_constants", BOTH, 20), ("g_helpers", CPP, 150)]},
    "C29": {"gens": [("g_asm", CPP, 1500)], "configs": ("x86-abi",),
            "otherwise": {"gens": [("g_frame", CPP, 200), ("g_model_ints", CPP, 1)], "configs": ("x86-san", "x86-opt")}},
}

# Models of the design: TLC explores them completely ("tlc"), or must find what is wrong with a broken design ("violated"); Apalache proves
# statements about arithmetic at full width ("wide"). The thorough tier runs both lists.
GROUP = {"quick": (("tlc", "MC_Group"),), "thorough": (("tlc", "MC_Group", "MC_Group43.cfg", 1500),)}
ECDSA = {"quick": (("tlc", "MC_Ecdsa"),),
         "thorough": (("tlc", "MC_Ecdsa", "MC_Ecdsa_bigorder.cfg"), ("tlc", "MC_Ecdsa", "MC_Ecdsa_smallorder.cfg"), ("tlc", "MC_Ecdsa", "MC_Ecdsa_all.cfg"))}
BASE58 = {"quick": (("tlc", "MC_Base58"),), "thorough": (("tlc", "MC_Base58", "MC_Base58_all.cfg"), ("tlc", "MC_Base58", "MC_Base58_deep.cfg"))}
BECH32 = {"quick": (("tlc", "MC_Bech32"),), "thorough": (("tlc", "MC_Bech32", "MC_Bech32_deep.cfg"),)}
WALLET = {"quick": (("tlc", "MC_Wallet"),), "thorough": (("tlc", "MC_Wallet", "MC_Wallet_deep.cfg"),)}
MODELS = {
    "C01": {"quick": (("wide", "WideWords", ("Added", "Subtracted", "Shifted")),)},
    "C02": {"quick": (("wide", "WideWords", ("Compared",)),)},
    "C03": {"quick": (("tlc", "MC_Reciprocal"),), "thorough": (("tlc", "MC_Reciprocal", "MC_Reciprocal9.cfg"),)},
    "C04": {"quick": (("tlc", "MC_Barrett"), ("wide", "WideWords", ("Multiplier", "Step0", "Step1", "Reduces", "Final", "FieldAdd", "FieldSubtract", "FieldFrom", "Row"))),
            "thorough": (("tlc", "MC_Barrett", "MC_Barrett10.cfg"), ("wide", "WideWords", ("Step2",)))},
    "C06": GROUP, "C07": GROUP, "C08": GROUP,
    "C09": ECDSA, "C10": ECDSA, "C11": ECDSA,
    "C18": BASE58, "C19": BASE58, "C20": BASE58,
    "C21": {"quick": BECH32["quick"] + (("tlc", "MC_Checksum"),), "thorough": BECH32["thorough"]},
    "C22": BECH32,
    "C23": WALLET, "C24": WALLET,
    "C26": {"quick": (("tlc", "MC_Threads"), ("violated", "MC_Threads", "MC_Threads_shared.cfg"))},
}
