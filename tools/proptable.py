"""Which contracts and witnesses decide which property, and what is assumed."""
DR = [("debug", ""), ("release", "")]
POLY = [("debug", "polyfill"), ("release", "polyfill")]
WITNESS_NOTE = "The quantifier is over client programs: the listed programs are the ways of breaking the guarantee that were found, each decided for the current tree by the compiler with a twin that must compile. Trusts rustc."
CHAIN_NOTE = ("Block sizes, allocation failures and the values stored are arbitrary; the number of blocks is not: chains of one to four blocks are built through the interface and the traversals unrolled. "
              "Trusts the MIR rustc produces, the analyser and its summaries of core/alloc.")
PROPS = {
    "C01": dict(mods=["c01"], thorough_variants=POLY),
    "C02": dict(mods=["c02"], thorough_variants=POLY),
    "C03": dict(mods=["c03"], thorough_variants=POLY),
    "C04": dict(mods=["c04"], thorough_variants=POLY),
    "C05": dict(mods=["c05", "c05u"], thorough_variants=POLY),
    "C06": dict(mods=["c06"], thorough_variants=POLY),
    "C07": dict(mods=["c07"], thorough_variants=POLY),
    "C08": dict(witness="c08", note=WITNESS_NOTE),
    "C09": dict(witness="c09", note=WITNESS_NOTE),
    "C10": dict(mods=["c10"], thorough_variants=POLY),
    "C11": dict(mods=["c11"], thorough_variants=POLY),
    "C12": dict(mods=["c12"], note=CHAIN_NOTE),
    "C13": dict(mods=["c13"], thorough_variants=POLY),
    "C14": dict(mods=["c14"], thorough_variants=POLY),
    "C15": dict(witness="c15", note=WITNESS_NOTE),
    "C16": dict(mods=["c16"]),
    "C17": dict(mods=["c17"]),
    "C18": dict(mods=["c18"], shards=4),
    "C19": dict(mods=["c19"], shards=3),
    "C20": dict(witness="c20", note=WITNESS_NOTE),
    "C21": dict(mods=["c21", "c21v"]),
    "C22": dict(mods=["c22", "c22v"]),
    "C23": dict(mods=["c23"], shards=3),
    "C24": dict(mods=["c24"], shards=3),
    "C25": dict(mods=["c25"]),
    "C26": dict(mods=["c26"]),
    "C27": dict(mods=["c27"]),
    "C28": dict(mods=["c28"]),
    "C29": dict(mods=["c29"]),
    "C30": dict(mods=["c30"]),
    "C31": dict(mods=["c31"]),
    "C32": dict(witness="c32", note=WITNESS_NOTE),
    "C33": dict(mods=["c33"]),
    "C34": dict(mods=["c34"], thorough_variants=POLY),
}
NOT_APPLICABLE = {
    "C35": "How much stack a call uses is decided by code generation (frame layout, inlining and slot merging differ per optimisation level); the source and MIR this technique inspects do not determine it.",
}
NOTES = "All checks are static: nothing of /repo is executed. No hooks in /repo are needed. DESIGN.md describes the analyser, the contracts and the findings."
