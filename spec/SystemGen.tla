----------------------------- MODULE SystemGen ------------------------------
EXTENDS System
AllCfgs == {[strong |-> s, partial |-> p, pre |-> r, cexp |-> c, sexp |-> c] :
              s \in BOOLEAN, p \in BOOLEAN, r \in BOOLEAN, c \in BOOLEAN}
OneCfg  == {[strong |-> FALSE, partial |-> FALSE, pre |-> FALSE, cexp |-> TRUE, sexp |-> TRUE]}
TwoCfgs == {[strong |-> TRUE, partial |-> TRUE, pre |-> FALSE, cexp |-> FALSE, sexp |-> FALSE]}
SpSr == {"spss", "srp"}
SpAu == {"spss", "au"}
AllSp == {"spab", "spss"}
OneSr == {"srp"}
OneAu == {"au"}
AllKinds == {"spab", "spss", "srp", "au"}
=============================================================================
