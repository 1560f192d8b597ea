#!/usr/bin/env python3
"""Shows that no invariant of the specification holds vacuously: each listed mutation of the protocol modules has to make
TLC report the named invariant (or property).

usage: mutspec.py [invariant ...]"""
import os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

S = "/verif/spec"
# (root module, configuration, invariant, file, old, new)
M = [
    ("Spake2Gen", "Spake2MCq", "Agreement", "Spake2", "HS(s.ids[2]), peer, s.body, k>>)", "HS(s.ids[2]), s.body, peer, k>>)"),
    ("Spake2Gen", "Spake2MCq", "Binding", "Spake2", '[] s.role = "S" -> Hash("sha256", <<HS(s.pw), HS(s.ids[1]), Sorted2', '[] s.role = "S" -> Hash("sha256", <<HS(s.pw), Sorted2'),
    ("Spake2Gen", "Spake2MCq", "Binding", "Spake2", 'HS(s.ids[1]), HS(s.ids[2]),', 'HS(s.ids[1] \\o s.ids[2]),'),
    ("Spake2Gen", "Spake2MCq", "Acceptance", "Spake2", '''[] OTHER                                 -> "Ok"''', '''[] m.body.k = "junk" -> "Ok" [] OTHER -> "BadSide"'''),
    ("Spake2Gen", "Spake2MCq", "Acceptance", "Spake2", '''\\/ s.role = "S" /\\ m.body = s.body)
                                               -> "BadSide"''', '''\\/ FALSE)
                                               -> "BadSide"'''),
    ("Spake2Gen", "Spake2MCq", "Blinded", "Spake2", "body |-> Enc(GAdd(GBase(x), GMul", "body |-> Enc(GAdd(GBase(PwScalar(pw)), GMul"),
    ("Spake2Gen", "Spake2MCq", "OneGuess", "Spake2", "body |-> Enc(GAdd(GBase(x), GMul(PwScalar(pw), Blind(role))))", "body |-> Enc(GBase(x))"),
    ("Spake2Toy", "Spake2Toy", "Agreement", "Spake2", "GMul(SNeg(PwScalar(s.pw)), Unblind(s.role))", "GMul(PwScalar(s.pw), Unblind(s.role))"),
    ("Spake2Toy", "Spake2Toy", "Binding", "Spake2", "Sorted2(s.body, peer), k>>", "k>>"),
    ("Spake2Table", "Spake2Table", "Total", "Spake2", 'CASE m.len # "ok"                          -> "WrongLength"', 'CASE m.len # "ok" -> "Length"'),
    ("SrpGen", "SrpMCq", "Agreement", "Srp", "XAdd(a, XMul(u, x))", "XAdd(a, x)"),
    ("SrpGen", "SrpMCq", "Binding", "Srp", "HX(salt, user, pw)", "HX(pw, user, pw)"),
    ("SrpGen", "SrpMCq", "Authentic", "Srp", 'IF want = got THEN "Ok"', 'IF want.k = got.k THEN "Ok"'),
    ("SrpGen", "SrpMCq", "Legal", "Srp", "IF Res(A) = RZero", 'IF A = Canon(RZero)'),
    ("SrpToyMC", "SrpToy23", "Agreement", "Srp", "XAdd(a, XMul(u, x))", "XAdd(a, x)"),
    ("SrpToyMC", "SrpToy23", "Legal", "Srp", "IF Res(B) = RZero", "IF B = 0"),
    ("AuCPaceGen", "AuCPaceMCq", "Agreement", "AuCPace", "PrsServer(x, w)     == Enc(EMul(x, w))", "PrsServer(x, w) == Enc(w)"),
    ("AuCPaceGen", "AuCPaceMCq", "Binding", "AuCPace", 'Map(H("H1", <<ssid, prs, Str(ci)>>))', 'Map(H("H1", <<ssid, prs>>))'),
    ("AuCPaceGen", "AuCPaceMCq", "Authentic", "AuCPaceMC", "ok == t = Tb(sv[n].ssid, sv[n].sk1)", "ok == t.k = Tb(sv[n].ssid, sv[n].sk1).k"),
    ("AuCPaceGen", "AuCPaceMCq", "Authentic", "AuCPaceMC", "ok == t = Ta(cl[n].ssid, cl[n].sk1)", "ok == TRUE"),
    ("AuCPaceGen", "AuCPaceMCq", "Roles", "AuCPace", 'H("H2", <<ssid, Enc(EMul(y, P))>>)', 'H("H2", <<Enc(P)>>)'),
    ("AuCPaceGen", "AuCPaceMCq", "NonNeutral", "AuCPaceMC", "IF Neutral(P)", "IF FALSE"),
    ("AuCPaceDecoy", "AuCPaceDecoy", "Consistent", "AuCPace", 'DecoyPk(secret, user)     == EBase(Node("decoypk", <<secret, Str(user)>>))', 'DecoyPk(secret, user)     == EBase(Node("decoypk", <<secret>>))'),
    ("AuCPaceDecoy", "AuCPaceDecoy", "Consistent", "AuCPaceDecoy", "ELSE DecoySalt(Secret(s), n)", 'ELSE Rnd(QId(i), "salt")'),
    ("Life", "LifeAu", "Fresh", "Life", "{Rnd(Pos[i], o.what)}", "{Rnd(IF o.op = \"reg\" THEN o.user ELSE Pos[i], o.what)}"),
    ("Life", "LifeSp", "Fresh", "Life", 'IF o.what = "" \\/ dry', 'IF o.what = ""'),
    ("Builds", "Builds", "SameOutcome", "Builds", "ELSE Value(step, Len(before))", "ELSE Value([step EXCEPT !.k.op = IF \"alloc\" \\in build THEN @ ELSE \"other\"], Len(before))"),
    ("Builds", "Builds", "Everything", "Builds", '''\\o (IF partial THEN <<S("s", "au.key", {})>> ELSE <<>>)''', '''\\o (IF partial THEN <<S("s", "au.key", {"nothing"})>> ELSE <<>>)'''),
    ("Builds", "Builds", "Stops", "Builds", "IF \\E i \\in DOMAIN before : ~Fine(before[i]) THEN Silent", "IF Len(before) > 0 /\\ ~Fine(before[Len(before)]) /\\ before[Len(before)] # Unavailable THEN Silent"),
    ("Builds", "Builds", "Complete", "Builds", "Offered(build, step.k) THEN Unavailable", "(Offered(build, step.k) \\/ Len(before) = 0) THEN Unavailable"),
    ("GroupLaws", "GroupLaws", "Laws", "GroupLaws", '[] e.k = "add"   -> EAdd(Den(e.e), Den(e.f))', '[] e.k = "add"   -> Den(e.e)'),
    ("AuCPaceGen", "AuCPaceMCq", "Decoy", "AuCPaceMC", 'ELSE Rnd(SN(n), "prs")', "ELSE PrsClient(cl[m].user, cl[m].pw, IF cfg.strong THEN Enc(EMul(SInv(R(m)), EMul(DecoyExp(Secret, user), bl))) ELSE DecoySalt(Secret, user), DefaultParams, X)"),
    ("AuCPaceGen", "AuCPaceMCq", "NoKey", "AuCPaceMC", """sv' = [sv EXCEPT ![n].st = 9, ![n].err = "MutualAuthFail"]""",
     """sv' = [sv EXCEPT ![n].st = 9, ![n].err = "MutualAuthFail", ![n].ta = ta]"""),
    ("AuCPaceTable", "AuCPaceTable", "ASSUME", "AuCPaceTable", "IF Buffered(e) /\\ ~Fits(u, p, b) THEN", "IF Buffered(e) /\\ ~Fits(u, p + 1, b) THEN"),
    ("Spake2Toy", "Spake2Toy", "ASSUME", "Spake2Toy", "BaseZ(s)    == s % Q", "BaseZ(s)    == (s * s) % Q"),
    ("Builds", "Builds", "ASSUME", "Builds", "alloc |-> {1, 2, 3}", "alloc |-> {1, 2, 4}"),
    ("Intruder", "Intruder", "Secret", "Intruder", 'EAdd(Y, EMul(PNeg(At("pw")), Ba(Peer(r))))', 'Y'),
    ("Intruder", "Intruder", "Secret", "Intruder", 'EAdd(A, GP(PMul(At("u"), At("x"))))', 'EAdd(A, GP(At("x")))'),
    ("Intruder", "Intruder", "Secret", "Intruder", 'EMul(PMul(At("ya"), At("r")), Ba("G2"))', 'EMul(PMul(At("ya"), At("r")), Ba("G"))'),
    ("Intruder", "Intruder", "Secret", "Intruder", 'EMul(At("q"), Ba("Z")), "salt",', 'EMul(At("q"), Ba("B")), "salt",'),
    ("Intruder", "Intruder", "Control", "Intruder", 'PAdd(At("a"), PMul(At("u"), At("x")))', 'PAdd(At("a"), At("x"))'),
    ("Outcomes", "Outcomes", "Undisturbed", "Outcomes", '[] c.c = "neutral" -> {"IllegalPoint"}', '[] o = "au.crecv" -> {"IllegalPoint"}'),
    ("Outcomes", "Outcomes", "Justified", "Outcomes", 'IF c # Usual /\\ c.n < 16 THEN', 'IF c.n < 16 THEN'),
    ("Outcomes", "Outcomes", "Answers", "Outcomes", 'a = "A" /\\ Illegal(c) -> {"IllegalParameter a_pub"}', 'a = "A" /\\ Illegal(c) -> {"IllegalParameter b_pub"}'),
    ("Outcomes", "Outcomes", "Ends", "Outcomes", "/\\ done' = ((last", "/\\ done' = (at = 3 \\/ (last"),
    ("SystemGen", "SystemMC1", "Isolation", "System", "/\\ ses' = [ses EXCEPT ![n] = Do(@, in)]",
     "/\\ ses' = [m \\in DOMAIN ses |-> IF m = n THEN Do(ses[n], in) ELSE IF ses[n].st # \"new\" /\\ ses[m].kind = ses[n].kind THEN [ses[m] EXCEPT !.x = ses[n].x] ELSE ses[m]]"),
    ("SystemGen", "SystemMC1", "NonInterference", "System", "/\\ ses' = [ses EXCEPT ![n] = Do(@, in)]",
     "/\\ ses' = [ses EXCEPT ![n] = IF n = 2 /\\ @.kind = \"sp\" /\\ @.st # \"new\" /\\ ses[1].st # \"new\" THEN Do([@ EXCEPT !.x = ses[1].x], in) ELSE Do(@, in)]"),
    ("SystemGen", "SystemMC1", "KeyAgreement", "Spake2", "Sorted2(s.body, peer), k>>", "s.body, peer, k>>"),
    ("SystemGen", "SystemMC1", "KeySeparation", "Spake2", """[] s.role = "S" -> Hash("sha256", <<HS(s.pw), HS(s.ids[1]), Sorted2(s.body, peer), k>>)""",
     """[] s.role = "S" -> Hash("sha256", <<HS(s.pw)>>)"""),
]


def run(m):
    mod, cfg, inv, f, old, new = m
    if old is None:
        return m, None, ""
    d = tempfile.mkdtemp(prefix="mutspec")
    try:
        for x in os.listdir(S):
            if x.endswith((".tla", ".cfg")):
                shutil.copy(f"{S}/{x}", d)
        text = open(f"{d}/{f}.tla").read()
        if text.count(old) < 1:
            return m, False, f"no place in {f}"
        open(f"{d}/{f}.tla", "w").write(text.replace(old, new))
        c = re.sub(r"(INVARIANTS?|PROPERT(Y|IES))( .*)?", "", open(f"{d}/{cfg}.cfg").read())
        c += f"\n{'PROPERTY' if inv in ('Isolation',) else 'INVARIANT'} {inv}\n" if inv != "ASSUME" else ""
        open(f"{d}/{cfg}.cfg", "w").write(c)
        r = subprocess.run(["tlc", "-noGenerateSpecTE", "-workers", "2", "-metadir", f"{d}/m", "-config", f"{cfg}.cfg", f"{mod}.tla"],
                           cwd=d, capture_output=True, text=True, timeout=600)
        o = "\n".join(l for l in r.stdout.splitlines() if not l.startswith('"'))
        hit = f"Invariant {inv} is violated" in o or f"property {inv} was violated" in o.lower() or "Action property" in o and "is violated" in o \
            or inv == "ASSUME" and "Assumption" in o and "is false" in o
        return m, hit, "" if hit else o[-600:]
    except subprocess.TimeoutExpired:
        return m, False, "timeout"
    finally:
        shutil.rmtree(d)


todo = [m for m in M if not sys.argv[1:] or m[2] in sys.argv[1:]]
with ThreadPoolExecutor(4) as ex:
    for m, hit, o in ex.map(run, todo):
        print(f"{m[0]} {m[2]}: {'violated, as it has to be' if hit else 'HOLDS' if hit is False else 'not mutated'}   {m[3]}: {(m[4] or '')[:60]!r}", flush=True)
        if hit is False:
            print(o)
