------------------------------ MODULE Operators ------------------------------
(* All Hamiltonians of the library, by kind.                                *)
EXTENDS Fermi, Spin, Asep
Terms(cfg, x) == CASE cfg.kind = "hubbard" -> HubbardTerms(cfg, x)
                   [] cfg.kind = "abinitio" -> AbInitioTerms(cfg, x)
                   [] cfg.kind = "spin" -> SpinTerms(cfg, x)
                   [] cfg.kind = "asep" -> AsepTerms(cfg, x)
Valid(cfg, x, y) ==
  CASE cfg.kind \in {"hubbard", "abinitio"} -> IsConf(Len(x), y) /\ NUp(y) = NUp(x) /\ NDown(y) = NDown(x)
    [] cfg.kind = "spin" -> Len(y) = Len(x) /\ (\A k \in 1..Len(y) : y[k] \in {-1, 1}) /\ Mag(y) = Mag(x)
    [] cfg.kind = "asep" -> Len(y) = Len(x) /\ (\A k \in 1..Len(y) : y[k] \in {0, 1})
=============================================================================
