---- MODULE AuCPaceGen ----
EXTENDS AuCPaceMC
AllCfgs == {[strong |-> s, partial |-> p, pre |-> r, cexp |-> c, sexp |-> e] :
              s \in BOOLEAN, p \in BOOLEAN, r \in BOOLEAN, c \in BOOLEAN, e \in BOOLEAN}
(* all variants with explicit authentication, implicit and mixed in some *)
GenCfgs == {c \in AllCfgs : (c.cexp /\ c.sexp) \/ (c.cexp = c.sexp /\ c.pre = c.strong) \/ (c.cexp # c.sexp /\ c.pre # c.partial /\ c.strong = c.cexp)}
FewCfgs == {c \in AllCfgs : c.cexp /\ c.sexp /\ (c.pre = (c.strong = c.partial))}
====
