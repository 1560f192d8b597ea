"""What each check runs: TLC on which modules, and which harness runs on their output."""

SP_GEN = {"name": "sp_gen", "module": "Spake2Gen.tla", "cfg": "Spake2Gen.cfg"}
SP_TOY = {"name": "sp_toy", "module": "Spake2Toy.tla", "cfg": "Spake2Toy.cfg"}
SP_TOY7 = {"name": "sp_toy7", "module": "Spake2Toy.tla", "cfg": "Spake2Toy7.cfg", "only": "thorough"}
SP_TAB = {"name": "sp_tab", "module": "Spake2Table.tla", "cfg": "Spake2Table.cfg"}
SP_MCQ = {"name": "sp_mcq", "module": "Spake2Gen.tla", "cfg": "Spake2MCq.cfg", "only": "quick"}
SP_MC2 = {"name": "sp_mc2", "module": "Spake2Gen.tla", "cfg": "Spake2MC.cfg", "only": "thorough"}
SP_LIFE = {"name": "sp_life", "module": "Life.tla", "cfg": "LifeSp.cfg", "only": "quick"}
SP_LIFED = {"name": "sp_life", "module": "Life.tla", "cfg": "LifeSpDeep.cfg", "only": "thorough"}
SP_ASSUME = [
    "perfect cryptography in the specification: hashes are free constructors, M, N, S and B have unrelated discrete logarithms",
    "curve25519-dalek and sha2, also used by the harness, are correct",
]


def sp(table=False, life=False):
    files = {"beh": "sp_gen", "toy": "sp_toy"}
    tl = [SP_MCQ, SP_MC2, SP_GEN, SP_TOY]
    if table:
        files["table"] = "sp_tab"
        tl.append(SP_TAB)
    if life:
        files["life"] = "sp_life"
        tl += [SP_LIFE, SP_LIFED]
    v = ["replayed", "toy_replayed"]
    return {
        "tlc": tl,
        "harness": [{"family": "spake", "files": files, "deep": {"profiles": 800, "fuzz": 3_000_000, "sweep": 200}}],
        "validated": v + (["fuzzed_finishes"] if table else []),
        "assumptions": SP_ASSUME,
    }


PLAN = {p: sp(p == "S03", p == "S05") for p in ("S01", "S02", "S03", "S04", "S05", "S06")}

PLAN["S07"] = {
    "tlc": [{"name": "sp_laws", "module": "GroupLaws.tla", "cfg": "GroupLaws.cfg", "only": "quick"},
            {"name": "sp_laws", "module": "GroupLaws.tla", "cfg": "GroupLawsDeep.cfg", "only": "thorough"}],
    "harness": [{"family": "spake", "files": {"laws": "sp_laws"}, "deep": {"rounds": 400, "samples": 300_000, "strings": 4_000_000}}],
    "validated": ["replayed"],
    "assumptions": ["curve25519-dalek, also used by the harness, is correct"],
}
PLAN["S08"] = {
    "tlc": [SP_TOY, SP_TOY7, SP_TAB],
    "harness": [{"family": "spake", "files": {"toy": "sp_toy", "table": "sp_tab"}, "deep": {"toyencs": 400, "fuzz": 3_000_000}},
                {"family": "spake", "files": {"toy": "sp_toy7", "table": "sp_tab"}, "args": {"toyq": 7, "toyencs": 60, "fuzz": 1},
                 "only": "thorough"}],
    "validated": ["toy_replayed", "fuzzed_finishes"],
    "assumptions": SP_ASSUME,
}

SR_GEN = {"name": "sr_gen", "module": "SrpGen.tla", "cfg": "SrpGen.cfg"}
SR_GEN2 = {"name": "sr_gen2", "module": "SrpGen.tla", "cfg": "SrpGen2.cfg", "only": "thorough"}
SR_MCQ = {"name": "sr_mcq", "module": "SrpGen.tla", "cfg": "SrpMCq.cfg", "only": "quick"}
SR_MC2 = {"name": "sr_mc2", "module": "SrpGen.tla", "cfg": "SrpMC.cfg", "only": "thorough"}
SR_T23 = {"name": "sr_t23", "module": "SrpToyMC.tla", "cfg": "SrpToy23.cfg"}
SR_T719 = {"name": "sr_t719", "module": "SrpToyMC.tla", "cfg": "SrpToy719.cfg"}
SR_GRP = {"name": "sr_grp", "module": "SrpGroups.tla", "cfg": "SrpGroups.cfg"}
SR_ASSUME = [
    "perfect cryptography in the symbolic specification: hashes are free constructors, g and k unrelated residues",
    "num-bigint, sha1 and sha2, also used by the harness, are correct",
]


def sr(p):
    toys = {} if p == "R02" else {"toy23": "sr_t23", "toy719": "sr_t719"}
    prof = {"R05": 40}.get(p, 150)
    return {
        "tlc": [SR_MCQ, SR_MC2, SR_GEN, SR_GEN2] + ([SR_T23, SR_T719] if toys else []),
        "harness": [
            {"family": "srp", "files": {"beh": "sr_gen", **toys}, "args": {"profiles": prof},
             "deep": {"profiles": 800, "real": 10, "fuzz": 1_000_000, "sweep": 150}},
            {"family": "srp", "files": {"beh": "sr_gen2"}, "args": {"profiles": 12, "real": 0, "fuzz": 1}, "only": "thorough"},
        ],
        "validated": ["replayed", "toy_replayed"] + (["fuzzed_replies"] if p == "R03" else []),
        "assumptions": SR_ASSUME,
    }


PLAN.update({p: sr(p) for p in ("R01", "R02", "R03", "R04", "R05")})
PLAN["R06"] = {
    "tlc": [SR_GRP],
    "harness": [{"family": "srp", "files": {"groups": "sr_grp"}}],
    "validated": ["replayed"],
    "assumptions": ["the moduli in SrpGroups.tla are those of RFC 5054 (3072 bits and more: computed from the formula of RFC 3526; all: safe primes)"],
}

AU_GEN1 = {"name": "au_gen1", "module": "AuCPaceGen.tla", "cfg": "AuCPaceGen1.cfg"}
AU_GEN = {"name": "au_gen", "module": "AuCPaceGen.tla", "cfg": "AuCPaceGen.cfg"}
AU_MCQ = {"name": "au_mcq", "module": "AuCPaceGen.tla", "cfg": "AuCPaceMCq.cfg"}
AU_DEC = {"name": "au_dec", "module": "AuCPaceDecoy.tla", "cfg": "AuCPaceDecoy.cfg", "only": "quick"}
AU_DEC4 = {"name": "au_dec", "module": "AuCPaceDecoy.tla", "cfg": "AuCPaceDecoy4.cfg", "only": "thorough"}
AU_GENU = {"name": "au_genu", "module": "AuCPaceGen.tla", "cfg": "AuCPaceGenU.cfg"}
AU_GEN1D = {"name": "au_gen1d", "module": "AuCPaceGen.tla", "cfg": "AuCPaceGen1d.cfg", "only": "thorough"}
AU_WIRE = {"name": "au_wire", "module": "AuCPaceWire.tla", "cfg": "AuCPaceWire.cfg"}
AU_LIFE = {"name": "au_life", "module": "Life.tla", "cfg": "LifeAu.cfg", "only": "quick"}
AU_LIFED = {"name": "au_life", "module": "Life.tla", "cfg": "LifeAuDeep.cfg", "only": "thorough"}
AU_TAB = {"name": "au_tab", "module": "AuCPaceTable.tla", "cfg": "AuCPaceTable.cfg"}
AU_ASSUME = [
    "perfect cryptography in the specification: hashes, the password hash and the map to the group are free constructors, bases have unrelated discrete logarithms",
    "curve25519-dalek, sha2, scrypt and password-hash, also used by the harness, are correct",
]


def au(p):
    if p == "A07":
        return {"tlc": [AU_TAB], "assumptions": AU_ASSUME, "validated": ["table_replayed"],
                "harness": [{"family": "aucpace", "files": {"table": "au_tab"}, "args": {"rounds": 6}, "deep": {"rounds": 400}}]}
    tl = [AU_MCQ, AU_GEN1, AU_GEN, AU_GEN1D]
    one, two, more = {"beh": "au_gen1"}, {"beh": "au_gen"}, []
    if p == "A05":
        tl += [AU_DEC, AU_DEC4]
        one["decoy"] = "au_dec"
    if p == "A06":
        tl += [AU_TAB]
        one["table"] = "au_tab"
    if p == "A11":
        tl += [AU_WIRE]
        one["wire"] = "au_wire"
    if p == "A10":
        tl += [AU_LIFE, AU_LIFED]
        one["life"] = "au_life"
    if p in ("A04", "A05", "A10"):
        tl += [AU_GENU]
        more.append({"family": "aucpace", "files": {"beh": "au_genu"}, "args": {"profiles": 4}, "deep": {"profiles": 200}})
    return {
        "tlc": tl,
        "harness": [
            {"family": "aucpace", "files": one, "args": {"profiles": 12, "sweep": 6}, "deep": {"profiles": 400, "sweep": 200, "decoys": 20, "rounds": 60}},
            {"family": "aucpace", "files": two, "args": {"profiles": 8, "sweep": 2}, "deep": {"profiles": 300, "sweep": 60}},
            {"family": "aucpace", "files": {"beh": "au_gen1d"}, "args": {"profiles": 12, "sweep": 20}, "only": "thorough"},
            *more,
        ],
        "validated": ["replayed"],
        "assumptions": AU_ASSUME,
    }


PLAN.update({f"A{n:02d}": au(f"A{n:02d}") for n in range(1, 12)})



def walks(n, tier):
    return {"name": "sys_walks", "module": "SystemGen.tla", "cfg": "SystemGen.cfg", "only": tier,
            "extra": ("-simulate", f"num={n}", "-depth", "92", "-seed", "1")}


PLAN["X01"] = {
    "tlc": [walks(80, "quick"), walks(3000, "thorough")] + [
        {"name": f"sys_mc{i}", "module": "SystemGen.tla", "cfg": f"SystemMC{i}.cfg", **({} if i in (1, 3, 4) else {"only": "thorough"})}
        for i in (1, 2, 3, 4, 5)],
    "harness": [{"family": "system", "files": {"walks": "sys_walks"},
                 "args": {"worlds": 60, "past": 400, "traced": 200},
                 "deep": {"worlds": 3000, "past": 20000, "traced": 5000, "budget": 20000, "times": 300000, "after": 60, "tries": 20000},
                 "trace": [{"name": "sys_trace", "module": "SystemTrace.tla", "cfg": "SystemTrace.cfg"}]}],
    "validated": ["sessions_alone"],
    "assumptions": ["the harness sees all randomness: the generators it passes in and getrandom(2)"],
}

PLAN["X02"] = {
    "tlc": [walks(80, "quick"), walks(600, "thorough"),
            {"name": "builds", "module": "Builds.tla", "cfg": "Builds.cfg", "only": "quick"},
            {"name": "builds", "module": "Builds.tla", "cfg": "BuildsDeep.cfg", "only": "thorough"}],
    "builds": {"table": "builds", "quick": ["powerpc-unknown-linux-gnu"],
               "thorough": ["powerpc-unknown-linux-gnu", "s390x-unknown-linux-gnu", "i686-unknown-linux-gnu"]},
    "harness": [{"family": "system", "files": {"walks": "sys_walks", "builds": "builds"},
                 "args": {"worlds": 48, "per": 5, "machine-sessions": 64},
                 "deep": {"worlds": 480, "per": 6, "machine-sessions": 1500}}],
    "validated": ["replayed"],
    "assumptions": ["Miri runs the code as the machines it stands for would",
                    "the harness sees all randomness: the generators it passes in and getrandom(2)"],
}

PLAN["X03"] = {
    "tlc": [{"name": "outc", "module": "Outcomes.tla", "cfg": "Outcomes.cfg", "only": "quick"},
            {"name": "outc", "module": "Outcomes.tla", "cfg": "OutcomesDeep.cfg", "only": "thorough"}],
    "harness": [{"family": "total", "files": {"sessions": "outc"}, "args": {"worlds": 3}, "deep": {"worlds": 40}}],
    "validated": ["replayed"],
    "assumptions": ["the classes of arguments stand for all of them"],
}


def intruder(worlds, deep, assume):
    return {"tlc": [{"name": "intr", "module": "Intruder.tla", "cfg": "Intruder.cfg"}],
            "harness": [{"family": "intruder", "files": {"scenes": "intr"}, "args": {"worlds": worlds}, "deep": {"worlds": deep, "extra": 1}}],
            "validated": ["replayed"], "assumptions": assume}


PLAN["S09"] = intruder(12, 150, SP_ASSUME)
PLAN["R07"] = intruder(24, 400, SR_ASSUME)
PLAN["A12"] = intruder(16, 300, AU_ASSUME)

INTR = ("exhaustive over the scenes of the specification (what an intruder of each kind sends: up to two products; that no combination "
        "of what he knows is the secret is decided for all combinations); in the real code each scene is played in many worlds, and the "
        "combinations of up to two or three products and the hashes of public values are tried, so the binding is by testing")
NOTES = {
    "S09": INTR,
    "R07": INTR,
    "A12": INTR,
    "X02": "exhaustive over the specification of the builds (all pairs of feature sets that matter, all variants); 8 builds chosen so that "
           "every two of 9 factors take all four values, and a 32-bit big-endian machine (Miri), each running thousands (the machine: 64) of "
           "sessions from the walks of the composed specification, compared step by step with the build that has everything",
    "X03": "exhaustive over the specification (every class of every argument, all pairs of classes of the small sets, all variants); each "
           "session played in several worlds, so the binding to the code is by testing",
    "X": "exhaustive over the bounded composed specification (2 pairs of sessions); random walks of 6 pairs of sessions of all protocols "
         "replayed in one process, thousands of sessions on 8 threads; each session compared with itself in a fresh process, "
         "and recorded traces checked by TLC",
    "A": "exhaustive over the bounded specification (2 clients, 2 sessions of one server, all 32 variants, all single departures from "
         "honest runs, 30 registration histories; decoy queries of 2 servers; tables of refused inputs); each behaviour replayed with "
         "many strings, hashers, hashes, nonce lengths and generators, so the binding to the code is by testing",
    "R": "exhaustive over the bounded specification (2 clients, 2 servers, all single departures from honest handshakes; toy fields Z_23, Z_719 "
         "with all public values up to 3N); binding to the code by replaying every behaviour in many groups, hashes and inputs",
    "S": "exhaustive over the bounded specification (3 sessions, input variations, 40 tamperings; Z_5 group completely); "
         "each behaviour replayed with many concretisations of strings and randomness, so the binding to the code is by testing",
}
